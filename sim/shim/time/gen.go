// Code generated by cmd/genshim from package time. DO NOT EDIT.

package time

import std "time"

const ANSIC = std.ANSIC
const April = std.April
const August = std.August

var Date = std.Date

const DateOnly = std.DateOnly
const DateTime = std.DateTime
const December = std.December

type Duration = std.Duration

const February = std.February

var FixedZone = std.FixedZone

const Friday = std.Friday
const Hour = std.Hour
const January = std.January
const July = std.July
const June = std.June
const Kitchen = std.Kitchen
const Layout = std.Layout

var LoadLocation = std.LoadLocation
var LoadLocationFromTZData = std.LoadLocationFromTZData
var Local = std.Local

type Location = std.Location

const March = std.March
const May = std.May
const Microsecond = std.Microsecond
const Millisecond = std.Millisecond
const Minute = std.Minute
const Monday = std.Monday

type Month = std.Month

const Nanosecond = std.Nanosecond
const November = std.November
const October = std.October

var Parse = std.Parse
var ParseDuration = std.ParseDuration

type ParseError = std.ParseError

var ParseInLocation = std.ParseInLocation

const RFC1123 = std.RFC1123
const RFC1123Z = std.RFC1123Z
const RFC3339 = std.RFC3339
const RFC3339Nano = std.RFC3339Nano
const RFC822 = std.RFC822
const RFC822Z = std.RFC822Z
const RFC850 = std.RFC850
const RubyDate = std.RubyDate
const Saturday = std.Saturday
const Second = std.Second
const September = std.September
const Stamp = std.Stamp
const StampMicro = std.StampMicro
const StampMilli = std.StampMilli
const StampNano = std.StampNano
const Sunday = std.Sunday
const Thursday = std.Thursday

type Time = std.Time

const TimeOnly = std.TimeOnly
const Tuesday = std.Tuesday

var UTC = std.UTC
var Unix = std.Unix

const UnixDate = std.UnixDate

var UnixMicro = std.UnixMicro
var UnixMilli = std.UnixMilli

const Wednesday = std.Wednesday

type Weekday = std.Weekday
