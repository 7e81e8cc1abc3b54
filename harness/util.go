package harness

import (
	"context"
	"encoding/json"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

type httpRequest = http.Request

func sortStrings(s []string) { sort.Strings(s) }

func cleanUTF8(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	return strings.ToValidUTF8(s, "")
}

func itoa(i int) string { return strconv.Itoa(i) }

type ctxT = context.Context

func jsonBytes(v any) ([]byte, error) { return json.Marshal(v) }

func jsonText(v any) string { b, _ := json.Marshal(v); return string(b) }
