module verif/harness

go 1.25

require (
	github.com/AthenZ/athenz v1.11.2
	github.com/ardielle/ardielle-go v1.5.2
	github.com/golang-jwt/jwt/v4 v4.4.1
	github.com/kpango/glg v1.6.11
	github.com/yahoojapan/athenz-authorizer/v5 v5.0.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/decred/dcrd/dcrec/secp256k1/v4 v4.0.1 // indirect
	github.com/goccy/go-json v0.9.7 // indirect
	github.com/klauspost/cpuid/v2 v2.0.13 // indirect
	github.com/kpango/fastime v1.1.4 // indirect
	github.com/kpango/gache v1.2.8 // indirect
	github.com/lestrrat-go/backoff/v2 v2.0.8 // indirect
	github.com/lestrrat-go/blackmagic v1.0.1 // indirect
	github.com/lestrrat-go/httpcc v1.0.1 // indirect
	github.com/lestrrat-go/iter v1.0.2 // indirect
	github.com/lestrrat-go/jwx v1.2.25 // indirect
	github.com/lestrrat-go/option v1.0.0 // indirect
	github.com/pkg/errors v0.9.1 // indirect
	github.com/zeebo/xxh3 v1.0.2 // indirect
	golang.org/x/crypto v0.0.0-20220525230936-793ad666bf5e // indirect
	golang.org/x/sync v0.0.0-20220601150217-0de741cfad7f // indirect
)

replace (
	github.com/kpango/fastime => ./fastime-shim
	github.com/yahoojapan/athenz-authorizer/v5 => /repo
)
