// Code generated by genmirror. DO NOT EDIT.

package time

import o_ "time"

const ANSIC = o_.ANSIC
const April = o_.April
const August = o_.August

var Date = o_.Date

const DateOnly = o_.DateOnly
const DateTime = o_.DateTime
const December = o_.December

type Duration = o_.Duration

const February = o_.February

var FixedZone = o_.FixedZone

const Friday = o_.Friday
const Hour = o_.Hour
const January = o_.January
const July = o_.July
const June = o_.June
const Kitchen = o_.Kitchen
const Layout = o_.Layout

var LoadLocation = o_.LoadLocation
var LoadLocationFromTZData = o_.LoadLocationFromTZData
var Local = o_.Local

type Location = o_.Location

const March = o_.March
const May = o_.May
const Microsecond = o_.Microsecond
const Millisecond = o_.Millisecond
const Minute = o_.Minute
const Monday = o_.Monday

type Month = o_.Month

const Nanosecond = o_.Nanosecond
const November = o_.November
const October = o_.October

var Parse = o_.Parse
var ParseDuration = o_.ParseDuration

type ParseError = o_.ParseError

var ParseInLocation = o_.ParseInLocation

const RFC1123 = o_.RFC1123
const RFC1123Z = o_.RFC1123Z
const RFC3339 = o_.RFC3339
const RFC3339Nano = o_.RFC3339Nano
const RFC822 = o_.RFC822
const RFC822Z = o_.RFC822Z
const RFC850 = o_.RFC850
const RubyDate = o_.RubyDate
const Saturday = o_.Saturday
const Second = o_.Second
const September = o_.September
const Stamp = o_.Stamp
const StampMicro = o_.StampMicro
const StampMilli = o_.StampMilli
const StampNano = o_.StampNano
const Sunday = o_.Sunday
const Thursday = o_.Thursday

type Time = o_.Time

const TimeOnly = o_.TimeOnly
const Tuesday = o_.Tuesday

var UTC = o_.UTC
var Unix = o_.Unix

const UnixDate = o_.UnixDate

var UnixMicro = o_.UnixMicro
var UnixMilli = o_.UnixMilli

const Wednesday = o_.Wednesday

type Weekday = o_.Weekday
