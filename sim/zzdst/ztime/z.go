//go:build go1.21

// Package time stands in for the standard package under simulation.
package time

import (
	"time"

	"github.com/wearelumenai/distclus/zzdst"
)

type (
	Duration   = time.Duration
	Time       = time.Time
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
	Timer      = zzdst.Timer
	Ticker     = zzdst.Ticker
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Layout      = time.Layout
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly
	January     = time.January
	February    = time.February
	March       = time.March
	April       = time.April
	May         = time.May
	June        = time.June
	July        = time.July
	August      = time.August
	September   = time.September
	October     = time.October
	November    = time.November
	December    = time.December
	Sunday      = time.Sunday
	Monday      = time.Monday
	Tuesday     = time.Tuesday
	Wednesday   = time.Wednesday
	Thursday    = time.Thursday
	Friday      = time.Friday
	Saturday    = time.Saturday
)

var (
	UTC   = time.UTC
	Local = time.UTC
)

func Now() Time                                { return zzdst.TimeNow() }
func Sleep(d Duration)                         { zzdst.Sleep(d, zzdst.CurSite()) }
func Since(t Time) Duration                    { return Now().Sub(t) }
func Until(t Time) Duration                    { return t.Sub(Now()) }
func After(d Duration) *zzdst.Chan[Time]       { return zzdst.NewTimer(d).C }
func NewTimer(d Duration) *Timer               { return zzdst.NewTimer(d) }
func AfterFunc(d Duration, f func()) *Timer    { return zzdst.AfterFunc(d, f) }
func NewTicker(d Duration) *Ticker             { return zzdst.NewTicker(d) }
func Tick(d Duration) *zzdst.Chan[Time]        { return zzdst.NewTicker(d).C }
func Unix(s, n int64) Time                     { return time.Unix(s, n) }
func UnixMilli(n int64) Time                   { return time.UnixMilli(n) }
func UnixMicro(n int64) Time                   { return time.UnixMicro(n) }
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }
func Parse(l, v string) (Time, error)          { return time.Parse(l, v) }
func Date(y int, m Month, d, h, mi, s, n int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, n, l)
}
func ParseInLocation(l, v string, loc *Location) (Time, error) {
	return time.ParseInLocation(l, v, loc)
}
func FixedZone(n string, off int) *Location    { return time.FixedZone(n, off) }
func LoadLocation(n string) (*Location, error) { return time.LoadLocation(n) }
func LoadLocationFromTZData(n string, d []byte) (*Location, error) {
	return time.LoadLocationFromTZData(n, d)
}
