module github.com/kpango/fastime

go 1.18
