package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/ticks"
	"github.com/sttp/goapi/sttp/transport"
	"verif.local/mc/mc"
)

// nameScenario checks the text of every member of the published enumerations:
// members are told apart by number and by name, and other numbers do not carry
// the name of a member.
func nameScenario(c *mc.C) {
	symbols := map[string]string{"Plus": "+", "Minus": "-", "Not": "~",
		"Multiply": "*", "Divide": "/", "Modulus": "%", "Add": "+", "Subtract": "-", "BitShiftLeft": "<<", "BitShiftRight": ">>", "BitwiseAnd": "&", "BitwiseOr": "|", "BitwiseXor": "^",
		"LessThan": "<", "LessThanOrEqual": "<=", "GreaterThan": ">", "GreaterThanOrEqual": ">=", "Equal": "=", "EqualExactMatch": "===", "NotEqual": "<>", "NotEqualExactMatch": "!==",
		"IsNull": "IS NULL", "IsNotNull": "IS NOT NULL", "Like": "LIKE", "LikeExactMatch": "LIKE BINARY", "NotLike": "NOT LIKE", "NotLikeExactMatch": "NOT LIKE BINARY", "And": "AND", "Or": "OR"}
	enums := []struct {
		members any
		text    func(int) string
		symbol  bool
		bound   int
	}{
		{data.ExpressionType, func(i int) string { return data.ExpressionTypeEnum(i).String() }, false, 100},
		{data.ExpressionValueType, func(i int) string { return data.ExpressionValueTypeEnum(i).String() }, false, 100},
		{data.ExpressionFunctionType, func(i int) string { return data.ExpressionFunctionTypeEnum(i).String() }, false, 200},
		{data.DataType, func(i int) string { return data.DataTypeEnum(i).String() }, false, 100},
		{transport.SignalKind, func(i int) string { return transport.SignalKindEnum(i).String() }, false, 100},
		{transport.ServerCommand, func(i int) string { return transport.ServerCommandEnum(i).String() }, false, 256},
		{transport.ServerResponse, func(i int) string { return transport.ServerResponseEnum(i).String() }, false, 256},
		{data.ExpressionUnaryType, func(i int) string { return data.ExpressionUnaryTypeEnum(i).String() }, true, 100},
		{data.ExpressionOperatorType, func(i int) string { return data.ExpressionOperatorTypeEnum(i).String() }, true, 100},
	}
	k := c.Choose(len(enums) + 1)
	if k == len(enums) {
		intervalNames(c)
		return
	}
	e := enums[k]
	v := reflect.ValueOf(e.members)
	number := func(i int) int {
		if f := v.Field(i); f.CanInt() {
			return int(f.Int())
		}
		return int(v.Field(i).Uint())
	}
	named, texts := map[int]string{}, map[string]string{}
	for i := 0; i < v.NumField(); i++ {
		name, n := v.Type().Field(i).Name, number(i)
		c.Case("enumeration %d member %s", k, name)
		if o, ok := named[n]; ok {
			c.Fail("names/number", "%s and %s have the same number %d", o, name, n)
		}
		named[n] = name
		got, ok := e.text(n), true
		if e.symbol {
			// more than one spelling of a symbol is in use
			alt := map[string][]string{"=": {"=="}, "<>": {"!="}, "~": {"NOT", "!"}, "^": {"XOR"}}
			ok = got == symbols[name]
			for _, a := range alt[symbols[name]] {
				ok = ok || got == a
			}
			ok = ok && symbols[name] != ""
		} else {
			ok = got == name
		}
		if !ok {
			c.Fail("names/text", "%s (%d) prints %q", name, n, got)
		}
		if o, ok := texts[got]; ok {
			c.Fail("names/distinct", "%s and %s both print %q", o, name, got)
		}
		texts[got] = name
		c.Steps(1)
		c.State("name", k, n)
	}
	for n := -1; n <= e.bound; n++ {
		if n == e.bound && e.bound == 256 || n < 0 && e.bound == 256 {
			continue
		}
		if _, ok := named[n]; !ok {
			if o := texts[e.text(n)]; o != "" && o != "Undefined" {
				c.Fail("names/other", "number %d, which is no member, prints %q", n, e.text(n))
			}
			c.Steps(1)
		}
	}
	c.Traces(1)
}

// intervalNames checks that exactly the names of the intervals are accepted.
func intervalNames(c *mc.C) {
	v := reflect.ValueOf(data.TimeInterval)
	seen := map[int64]string{}
	isName := map[string]bool{}
	for i := 0; i < v.NumField(); i++ {
		isName[strings.ToUpper(v.Type().Field(i).Name)] = true
	}
	for i := 0; i < v.NumField(); i++ {
		name, n := v.Type().Field(i).Name, v.Field(i).Int()
		if o, ok := seen[n]; ok {
			c.Fail("intervals/number", "%s and %s have the same number", o, name)
		}
		seen[n] = name
		for _, form := range []string{name, strings.ToLower(name), strings.ToUpper(name), " " + name, name + "\t", " " + name + " "} {
			c.Case("interval %q", form)
			got, err := data.ParseTimeInterval(form)
			if err != nil || int64(got) != n {
				c.Fail("intervals/parse", "%q is interval %d (%v), expected %d", form, got, err, n)
			}
			c.Steps(1)
			c.State("interval", form)
		}
		// every proper part of the name, and the name with one more or another character
		for a := 0; a <= len(name); a++ {
			for b := a; b <= len(name); b++ {
				for _, text := range []string{name[a:b], name[:a] + " " + name[a:], name[:a] + "s" + name[a:], name[a:b] + name[a:b]} {
					u := strings.ToUpper(strings.TrimSpace(text))
					c.Case("interval %q", text)
					if _, err := data.ParseTimeInterval(text); (err == nil) != isName[u] {
						c.Fail("intervals/refused", "%q: %v", text, err)
					}
					c.Steps(1)
				}
			}
		}
		c.Traces(1)
	}
	c.State(fmt.Sprint(len(seen)))
}

// measurementScenario checks the time and the text of measurements of every
// combination of signal, time, value and flags of the lists.
func measurementScenario(c *mc.C) {
	ids := []guid.Guid{guid.Empty, {0x12, 0x34, 0x56, 0x78, 0x9a, 0xbc, 0xde, 0xf0, 1, 2, 3, 4, 5, 6, 7, 8}}
	times := []time.Time{time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2021, 12, 31, 23, 59, 59, 999000000, time.UTC), time.Date(2022, 2, 3, 4, 5, 6, 120000000, time.UTC), time.Date(9999, 12, 31, 1, 0, 0, 0, time.UTC), time.Date(1969, 7, 20, 20, 17, 40, 5000000, time.UTC)}
	values := []float64{0, -1.5, 59.9995, 1e9, 0.0004, -0.25, 123456.7891}
	flags := []transport.StateFlagsEnum{0, transport.StateFlags.BadData, transport.StateFlags.BadTime | transport.StateFlags.MeasurementError}
	id, at := ids[c.Choose(len(ids))], times[c.Choose(len(times))]
	leap := c.Choose(3)
	for _, v := range values {
		for _, f := range flags {
			t := (at.Unix()+62135596800)*10000000 + int64(at.Nanosecond()/100)
			m := transport.Measurement{SignalID: id, Value: v, Timestamp: ticks.Ticks(uint64(t) | uint64(leap)<<62), Flags: f}
			c.Case("measurement of %v at %v leap second flags %d value %v flags %x", id, at, leap, v, uint32(f))
			if m.TimestampValue() != t {
				c.Fail("measurement/time", "time value %d, made of %d", m.TimestampValue(), t)
			}
			if g := m.DateTime(); !g.Equal(at) || g.Location() != time.UTC {
				c.Fail("measurement/time", "time %v, made of %v", g, at)
			}
			want := fmt.Sprintf("%s @ %s = %s (%s)", id.String(), at.Format("15:04:05.999"), strconv.FormatFloat(v, 'f', 3, 64), f.String())
			if g := m.String(); g != want {
				c.Fail("measurement/text", "prints %q, want %q", g, want)
			}
			c.Steps(3)
			c.State("measurement", id.String(), t, leap, v, uint32(f))
		}
	}
	c.Traces(1)
}
