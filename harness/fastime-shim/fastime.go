// Package fastime is a drop-in replacement of github.com/kpango/fastime for the
// verification harness only. The real package caches time.Now() in a process-wide
// goroutine that ticks every 5 ms; this one asks time.Now() directly, so that
// inside a testing/synctest bubble every clock the library reads (time.Now,
// fastime, tickers, sleeps, gache expiry, jwt) is the same virtual clock.
package fastime

import (
	"context"
	"time"
)

type Fastime interface {
	IsDaemonRunning() bool
	GetFormat() string
	SetFormat(format string) Fastime
	GetLocation() *time.Location
	SetLocation(location *time.Location) Fastime
	Now() time.Time
	Stop()
	UnixNow() int64
	UnixUNow() uint32
	UnixNanoNow() int64
	UnixUNanoNow() uint32
	FormattedNow() []byte
	StartTimerD(ctx context.Context, dur time.Duration) Fastime
}

type shim struct{}

var instance Fastime = shim{}

func New() Fastime { return shim{} }

func (shim) IsDaemonRunning() bool                                { return true }
func (shim) GetFormat() string                                    { return time.RFC3339 }
func (s shim) SetFormat(string) Fastime                           { return s }
func (shim) GetLocation() *time.Location                          { return time.Local }
func (s shim) SetLocation(*time.Location) Fastime                 { return s }
func (shim) Now() time.Time                                       { return time.Now() }
func (shim) Stop()                                                {}
func (shim) UnixNow() int64                                       { return time.Now().Unix() }
func (shim) UnixUNow() uint32                                     { return uint32(time.Now().Unix()) }
func (shim) UnixNanoNow() int64                                   { return time.Now().UnixNano() }
func (shim) UnixUNanoNow() uint32                                 { return uint32(time.Now().UnixNano()) }
func (shim) FormattedNow() []byte                                 { return []byte(time.Now().Format(time.RFC3339)) }
func (s shim) StartTimerD(context.Context, time.Duration) Fastime { return s }

func IsDaemonRunning() bool                       { return instance.IsDaemonRunning() }
func GetLocation() *time.Location                 { return instance.GetLocation() }
func GetFormat() string                           { return instance.GetFormat() }
func SetLocation(location *time.Location) Fastime { return instance.SetLocation(location) }
func SetFormat(format string) Fastime             { return instance.SetFormat(format) }
func Now() time.Time                              { return instance.Now() }
func Stop()                                       {}
func UnixNow() int64                              { return instance.UnixNow() }
func UnixUNow() uint32                            { return instance.UnixUNow() }
func UnixNanoNow() int64                          { return instance.UnixNanoNow() }
func UnixUNanoNow() uint32                        { return instance.UnixUNanoNow() }
func FormattedNow() []byte                        { return instance.FormattedNow() }
func StartTimerD(ctx context.Context, dur time.Duration) Fastime {
	return instance.StartTimerD(ctx, dur)
}
