package main

import (
	"math/rand"
	"strings"
	"time"
)

var layouts = []string{time.Layout, time.ANSIC, time.RubyDate, time.RFC822Z, time.RFC1123Z, time.RFC3339, time.RFC3339Nano, time.Kitchen, time.Stamp, time.StampMilli, time.StampMicro, time.StampNano,
	time.DateTime, time.DateOnly, time.TimeOnly, "2006-01-02T15:04:05.000000Z07:00:00", "Monday, 02-Jan-06 15:04:05", "06/1/2 3:4:5PM", "__2 2006", "002 2006", "", "no verbs", "日本 2006"}

var constLayouts = map[string]string{"LAYOUT": time.Layout, "ANSIC": time.ANSIC, "UNIX_DATE": time.UnixDate, "RUBY_DATE": time.RubyDate, "RFC822": time.RFC822, "RFC822Z": time.RFC822Z, "RFC850": time.RFC850,
	"RFC1123": time.RFC1123, "RFC1123Z": time.RFC1123Z, "RFC3339": time.RFC3339, "RFC3339NANO": time.RFC3339Nano, "KITCHEN": time.Kitchen, "STAMP": time.Stamp, "STAMP_MILLI": time.StampMilli,
	"STAMP_MICRO": time.StampMicro, "STAMP_NANO": time.StampNano, "DATETIME": time.DateTime, "DATE_ONLY": time.DateOnly, "TIME_ONLY": time.TimeOnly}

var constInts = map[string]time.Duration{"NANOSECOND": time.Nanosecond, "MICROSECOND": time.Microsecond, "MILLISECOND": time.Millisecond, "SECOND": time.Second, "MINUTE": time.Minute, "HOUR": time.Hour}

// zones whose name and abbreviation both denote a loadable or non-zero-offset zone
var ianaZones = []string{"UTC", "", "Asia/Tokyo", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "Europe/London", "America/St_Johns", "Pacific/Kiritimati", "Asia/Kathmandu", "Local"}

func gTime(r *rand.Rand, a *Arg) {
	gI(r, a)
	sec := func() int64 {
		if r.Intn(3) == 0 {
			return rint(r)
		}
		return r.Int63n(8e9) - 4e9
	}
	nano := func() int64 {
		if r.Intn(4) == 0 {
			return rint(r)
		}
		return r.Int63n(1e9)
	}
	a.I0, a.I1, a.I3, a.I4 = sec(), nano(), sec(), nano()
	if r.Intn(5) == 0 {
		a.I3, a.I4 = a.I0, a.I1
	}
	a.S0 = []string{"JST", "X", "", "UTC-8", "日本", "a b"}[r.Intn(6)]
	a.I2 = []int64{9 * 3600, -8 * 3600, 1, -1, 5*3600 + 1800, 86399, -86399, 3601, 1 << 40}[r.Intn(9)]
	a.S1 = ianaZones[r.Intn(len(ianaZones))]
	a.S2 = layouts[r.Intn(len(layouts))]
	a.S3 = rstr(r)
	a.Y0 = rbytes(r)
	a.I5 = []int64{0, 1, -1, int64(time.Second), int64(time.Hour), int64(24 * time.Hour), rint(r), rint(r)}[r.Intn(8)]
	a.D0 = float64(a.I2) + 0.25
	if a.I2 < 0 {
		a.D0 = float64(a.I2) - 0.25
	}
}

const zfmt = "'2006-01-02T15:04:05.999999999Z07:00:00'"

func timeFns() []fn {
	var l []fn
	T := "grpc.federation.time."
	dur := func(call string, f func(d time.Duration, a *Arg) any) {
		l = append(l, fn{name: "duration." + call, expr: T + "toDuration($.i0)." + call, gen: func(r *rand.Rand, a *Arg) {
			gI(r, a)
			if r.Intn(3) == 0 {
				a.I1 = []int64{1, 10, int64(time.Second), int64(time.Minute)}[r.Intn(4)]
			}
		}, want: func(a *Arg) (any, error) { return native(f(time.Duration(a.I0), a)), nil }})
	}
	dur("abs()", func(d time.Duration, _ *Arg) any { return d.Abs() })
	dur("hours()", func(d time.Duration, _ *Arg) any { return d.Hours() })
	dur("microseconds()", func(d time.Duration, _ *Arg) any { return d.Microseconds() })
	dur("milliseconds()", func(d time.Duration, _ *Arg) any { return d.Milliseconds() })
	dur("minutes()", func(d time.Duration, _ *Arg) any { return d.Minutes() })
	dur("nanoseconds()", func(d time.Duration, _ *Arg) any { return d.Nanoseconds() })
	dur("seconds()", func(d time.Duration, _ *Arg) any { return d.Seconds() })
	dur("string()", func(d time.Duration, _ *Arg) any { return d.String() })
	dur("round($.i1)", func(d time.Duration, a *Arg) any { return d.Round(time.Duration(a.I1)) })
	dur("truncate($.i1)", func(d time.Duration, a *Arg) any { return d.Truncate(time.Duration(a.I1)) })
	dur("round("+T+"toDuration($.i1))", func(d time.Duration, a *Arg) any { return d.Round(time.Duration(a.I1)) })
	dur("truncate("+T+"toDuration($.i1))", func(d time.Duration, a *Arg) any { return d.Truncate(time.Duration(a.I1)) })
	l = append(l, fn{name: "parseDuration", expr: T + "parseDuration($.s0)", gen: func(r *rand.Rand, a *Arg) {
		if a.S0 = rstr(r); r.Intn(2) == 0 {
			a.S0 = time.Duration(rint(r)).String()
		}
	}, want: func(a *Arg) (any, error) { return time.ParseDuration(a.S0) }})

	// base times: their Go value and expression
	type base struct {
		name, expr string
		f          func(a *Arg) (time.Time, error)
	}
	fixed := func(a *Arg) *time.Location { return time.FixedZone(a.S0, int(a.I2)) }
	bases := []base{
		{"utc", T + "unix($.i0, $.i1).utc()", func(a *Arg) (time.Time, error) { return time.Unix(a.I0, a.I1).UTC(), nil }},
		{"fixed", T + "unix($.i0, $.i1).withLocation(" + T + "fixedZone($.s0, $.i2))", func(a *Arg) (time.Time, error) { return time.Unix(a.I0, a.I1).In(fixed(a)), nil }},
		{"fixedDouble", T + "unix($.i0, $.i1).withLocation(" + T + "fixedZone($.s0, $.d0))", func(a *Arg) (time.Time, error) {
			return time.Unix(a.I0, a.I1).In(time.FixedZone(a.S0, int(a.D0))), nil
		}},
		{"iana", T + "unix($.i0, $.i1).withLocation(" + T + "loadLocation($.s1))", func(a *Arg) (time.Time, error) {
			loc, err := time.LoadLocation(a.S1)
			if err != nil {
				return time.Time{}, err
			}
			return time.Unix(a.I0, a.I1).In(loc), nil
		}},
		{"plain", T + "unix($.i0, $.i1)", func(a *Arg) (time.Time, error) { return time.Unix(a.I0, a.I1), nil }},
	}
	other := T + "unix($.i3, $.i4)"
	otherF := func(a *Arg) time.Time { return time.Unix(a.I3, a.I4) }
	for _, b := range bases {
		// zone-dependent observations of zones with transitions are judged separately
		iana := b.name == "iana" || b.name == "plain"
		o := func(call string, f func(t time.Time, a *Arg) any) {
			l = append(l, fn{name: b.name + "." + call, expr: b.expr + "." + call, gen: gTime, want: func(a *Arg) (any, error) {
				t, err := b.f(a)
				if err != nil {
					return nil, err
				}
				return native(f(t, a)), nil
			}})
		}
		ot := func(call string, f func(t time.Time, a *Arg) (time.Time, error)) {
			// a time keeps the offset of its location, not the location (known finding time-location-lossy)
			if iana && (strings.HasPrefix(call, "add") || strings.HasPrefix(call, "round") || strings.HasPrefix(call, "truncate")) {
				return
			}
			e := b.expr + "." + call
			if call == "" {
				e = b.expr
			}
			l = append(l, fn{name: b.name + "." + call, expr: "[" + e + "].map(t, [t.unix(), t.nanosecond(), t.format(" + zfmt + "), t.format('MST')])[0]", gen: gTime, want: func(a *Arg) (any, error) {
				t, err := b.f(a)
				if err == nil {
					t, err = f(t, a)
				}
				if err != nil {
					return nil, err
				}
				return []any{t.Unix(), int64(t.Nanosecond()), t.Format("2006-01-02T15:04:05.999999999Z07:00:00"), t.Format("MST")}, nil
			}})
		}
		o("after("+other+")", func(t time.Time, a *Arg) any { return t.After(otherF(a)) })
		o("before("+other+")", func(t time.Time, a *Arg) any { return t.Before(otherF(a)) })
		o("equal("+other+")", func(t time.Time, a *Arg) any { return t.Equal(otherF(a)) })
		o("compare("+other+")", func(t time.Time, a *Arg) any { return t.Compare(otherF(a)) })
		o("sub("+other+")", func(t time.Time, a *Arg) any { return t.Sub(otherF(a)) })
		o("day()", func(t time.Time, _ *Arg) any { return t.Day() })
		o("hour()", func(t time.Time, _ *Arg) any { return t.Hour() })
		o("minute()", func(t time.Time, _ *Arg) any { return t.Minute() })
		o("month()", func(t time.Time, _ *Arg) any { return int(t.Month()) })
		o("nanosecond()", func(t time.Time, _ *Arg) any { return t.Nanosecond() })
		o("second()", func(t time.Time, _ *Arg) any { return t.Second() })
		o("string()", func(t time.Time, _ *Arg) any { return t.String() })
		o("unix()", func(t time.Time, _ *Arg) any { return t.Unix() })
		o("unixMicro()", func(t time.Time, _ *Arg) any { return t.UnixMicro() })
		o("unixMilli()", func(t time.Time, _ *Arg) any { return t.UnixMilli() })
		o("unixNano()", func(t time.Time, _ *Arg) any { return t.UnixNano() })
		o("weekday()", func(t time.Time, _ *Arg) any { return int(t.Weekday()) })
		o("year()", func(t time.Time, _ *Arg) any { return t.Year() })
		o("yearDay()", func(t time.Time, _ *Arg) any { return t.YearDay() })
		o("isZero()", func(t time.Time, _ *Arg) any { return t.IsZero() })
		o("format($.s2)", func(t time.Time, a *Arg) any { return t.Format(a.S2) })
		o("format($.s3)", func(t time.Time, a *Arg) any { return t.Format(a.S3) })
		o("appendFormat($.s3, $.s2)", func(t time.Time, a *Arg) any { return t.AppendFormat([]byte(a.S3), a.S2) })
		o("appendFormat($.y0, $.s2)", func(t time.Time, a *Arg) any { return t.AppendFormat([]byte(string(a.Y0)), a.S2) })
		if !iana {
			o("isDST()", func(t time.Time, _ *Arg) any { return t.IsDST() })
			o("location().string()", func(t time.Time, _ *Arg) any { return t.Location().String() })
		}
		ot("", func(t time.Time, _ *Arg) (time.Time, error) { return t, nil })
		ot("add($.i5)", func(t time.Time, a *Arg) (time.Time, error) { return t.Add(time.Duration(a.I5)), nil })
		ot("add("+T+"toDuration($.i5))", func(t time.Time, a *Arg) (time.Time, error) { return t.Add(time.Duration(a.I5)), nil })
		ot("addDate($.i3, $.i4, $.i5)", func(t time.Time, a *Arg) (time.Time, error) { return t.AddDate(int(a.I3), int(a.I4), int(a.I5)), nil })
		ot("round($.i5)", func(t time.Time, a *Arg) (time.Time, error) { return t.Round(time.Duration(a.I5)), nil })
		ot("round("+T+"toDuration($.i5))", func(t time.Time, a *Arg) (time.Time, error) { return t.Round(time.Duration(a.I5)), nil })
		ot("truncate($.i5)", func(t time.Time, a *Arg) (time.Time, error) { return t.Truncate(time.Duration(a.I5)), nil })
		ot("truncate("+T+"toDuration($.i5))", func(t time.Time, a *Arg) (time.Time, error) { return t.Truncate(time.Duration(a.I5)), nil })
		ot("utc()", func(t time.Time, _ *Arg) (time.Time, error) { return t.UTC(), nil })
		ot("local()", func(t time.Time, _ *Arg) (time.Time, error) { return t.Local(), nil })
		ot("withLocation("+T+"fixedZone('W', 3600))", func(t time.Time, _ *Arg) (time.Time, error) { return t.In(time.FixedZone("W", 3600)), nil })
		ot("withLocation("+T+"UTC())", func(t time.Time, _ *Arg) (time.Time, error) { return t.UTC(), nil })
		ot("withLocation("+T+"LOCAL())", func(t time.Time, _ *Arg) (time.Time, error) { return t.Local(), nil })
	}
	obs := func(name, e string, gen func(*rand.Rand, *Arg), f func(a *Arg) (time.Time, error)) {
		l = append(l, fn{name: name, expr: "[" + e + "].map(t, [t.unix(), t.nanosecond(), t.format(" + zfmt + ")])[0]", gen: gen, want: func(a *Arg) (any, error) {
			t, err := f(a)
			if err != nil {
				return nil, err
			}
			return []any{t.Unix(), int64(t.Nanosecond()), t.Format("2006-01-02T15:04:05.999999999Z07:00:00")}, nil
		}})
	}
	obs("unixMicro", T+"unixMicro($.i0)", gTime, func(a *Arg) (time.Time, error) { return time.UnixMicro(a.I0), nil })
	obs("unixMilli", T+"unixMilli($.i0)", gTime, func(a *Arg) (time.Time, error) { return time.UnixMilli(a.I0), nil })
	gDate := func(r *rand.Rand, a *Arg) {
		gTime(r, a)
		z := []int64{int64(r.Intn(14)), int64(r.Intn(33)), int64(r.Intn(25)), int64(r.Intn(61))}
		y := 1900 + int64(r.Intn(200))
		if r.Intn(5) == 0 {
			y = rint(r) >> 24
			z = []int64{rint(r) >> 20, rint(r) >> 20, rint(r) >> 20, rint(r) >> 20}
		}
		a.LI = []int64{y, z[0], z[1], z[2], z[3], int64(r.Intn(61)), int64(r.Intn(1e9))}
	}
	date := func(a *Arg, loc *time.Location) time.Time {
		x := a.LI
		return time.Date(int(x[0]), time.Month(x[1]), int(x[2]), int(x[3]), int(x[4]), int(x[5]), int(x[6]), loc)
	}
	de := T + "date($.li[0], $.li[1], $.li[2], $.li[3], $.li[4], $.li[5], $.li[6], "
	obs("date/utc", de+T+"UTC())", gDate, func(a *Arg) (time.Time, error) { return date(a, time.UTC), nil })
	obs("date/fixed", de+T+"fixedZone($.s0, $.i2))", gDate, func(a *Arg) (time.Time, error) { return date(a, fixed(a)), nil })
	obs("date/iana", de+T+"loadLocation($.s1))", gDate, func(a *Arg) (time.Time, error) {
		loc, err := time.LoadLocation(a.S1)
		if err != nil {
			return time.Time{}, err
		}
		return date(a, loc), nil
	})
	gParseT := func(r *rand.Rand, a *Arg) {
		gTime(r, a)
		a.S2 = layouts[r.Intn(len(layouts))]
		if r.Intn(4) == 0 {
			a.S0 = rstr(r)
			return
		}
		t := time.Unix(r.Int63n(8e9)-4e9, r.Int63n(1e9)).In([]*time.Location{time.UTC, time.FixedZone("", 9*3600), time.FixedZone("", -3600*7-1800)}[r.Intn(3)])
		a.S0 = t.Format(a.S2)
		if r.Intn(4) == 0 && a.S0 != "" {
			i := r.Intn(len(a.S0))
			a.S0 = a.S0[:i] + string(rune('0'+r.Intn(10))) + a.S0[i+1:]
		}
	}
	obs("parse", T+"parse($.s2, $.s0)", gParseT, func(a *Arg) (time.Time, error) { return time.Parse(a.S2, a.S0) })
	obs("parseInLocation/fixed", T+"parseInLocation($.s2, $.s0, "+T+"fixedZone('Z9', 32400))", gParseT, func(a *Arg) (time.Time, error) {
		return time.ParseInLocation(a.S2, a.S0, time.FixedZone("Z9", 32400))
	})
	obs("parseInLocation/iana", T+"parseInLocation($.s2, $.s0, "+T+"loadLocation($.s1))", gParseT, func(a *Arg) (time.Time, error) {
		loc, err := time.LoadLocation(a.S1)
		if err != nil {
			return time.Time{}, err
		}
		return time.ParseInLocation(a.S2, a.S0, loc)
	})
	obs("asTime", "google.protobuf.Timestamp{seconds: $.i0, nanos: 7}.asTime()", func(r *rand.Rand, a *Arg) { a.I0 = r.Int63n(3e11) - 6e10 }, func(a *Arg) (time.Time, error) { return time.Unix(a.I0, 7).UTC(), nil })
	l = append(l,
		fn{name: "loadLocation.string", expr: T + "loadLocation($.s1).string()", gen: func(r *rand.Rand, a *Arg) {
			gTime(r, a)
			if r.Intn(4) == 0 {
				a.S1 = rstr(r)
			}
		}, want: func(a *Arg) (any, error) {
			loc, err := time.LoadLocation(a.S1)
			if err != nil {
				return nil, err
			}
			return loc.String(), nil
		}},
		fn{name: "fixedZone.string", expr: T + "fixedZone($.s0, $.i2).string()", gen: gTime, want: func(a *Arg) (any, error) { return a.S0, nil }},
		fn{name: "UTC.string", expr: T + "UTC().string()", gen: gTime, want: func(a *Arg) (any, error) { return "UTC", nil }},
		fn{name: "LOCAL.string", expr: T + "LOCAL().string()", gen: gTime, want: func(a *Arg) (any, error) { return time.Local.String(), nil }},
		fn{name: "since/until", expr: "[" + T + "unix($.i0, 0)].map(t, [" + T + "since(t), " + T + "until(t)].map(d, d + " + T + "toDuration(0)))[0].map(d, d.abs() >= duration('0s'))", gen: func(r *rand.Rand, a *Arg) { a.I0 = r.Int63n(4e9) }, want: func(a *Arg) (any, error) { return []any{true, true}, nil }},
	)
	for k, v := range constLayouts {
		l = append(l, fn{name: "const." + k, expr: T + k, gen: gI, want: func(*Arg) (any, error) { return v, nil }})
	}
	for k, v := range constInts {
		l = append(l, fn{name: "const." + k, expr: T + k, gen: gI, want: func(*Arg) (any, error) { return int64(v), nil }})
	}
	return l
}

// clockFns are judged against the clock around the evaluation.
func clockCheck(r *rand.Rand) {
	for _, e := range []string{"now()", "since", "until"} {
		var expr string
		a := &Arg{I0: r.Int63n(4e9)}
		T := "grpc.federation.time."
		switch e {
		case "now()":
			expr = T + "now().unixNano()"
		default:
			expr = T + e + "(" + T + "unix($.i0, 0)).nanoseconds()"
		}
		lo := time.Now()
		o := eval(expr, a, nil)
		hi := time.Now()
		got, ok := native(o.v).(int64)
		t := time.Unix(a.I0, 0)
		var x, y int64
		switch e {
		case "now()":
			x, y = lo.UnixNano(), hi.UnixNano()
		case "since":
			x, y = int64(lo.Sub(t)), int64(hi.Sub(t))
		case "until":
			x, y = int64(t.Sub(hi)), int64(t.Sub(lo))
		}
		slack := int64(time.Second) // steps of the wall clock
		if !ok || got < x-slack || got > y+slack {
			viol("time."+e, "%s = %v, want between %d and %d", expr, o, x, y)
		}
		count("clock_checks", 1)
	}
}
