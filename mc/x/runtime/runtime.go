// Package runtime mirrors the standard package: the scheduler is ours, and the
// statistics can be dictated by the harness.
package runtime

import (
	"reflect"
	"unsafe"
	o_ "runtime"

	"verif/mc"
)

func Gosched() {
	if mc.S != nil {
		mc.Gosched()
	}
}

func Goexit() { o_.Goexit() }

func NumGoroutine() int {
	if v, ok := mc.MemOverride("NumGoroutine"); ok {
		return int(v)
	}
	if mc.S != nil {
		return mc.LiveGoroutines()
	}
	return o_.NumGoroutine()
}

func NumCgoCall() int64 {
	if v, ok := mc.MemOverride("NumCgoCall"); ok {
		return int64(v)
	}
	return o_.NumCgoCall()
}

// ReadMemStats fills every numeric field from the harness when it dictates values.
func ReadMemStats(m *MemStats) {
	if _, ok := mc.MemOverride(""); !ok {
		o_.ReadMemStats(m)
		mc.RaceWrite(unsafe.Pointer(m), int(unsafe.Sizeof(*m)))
		return
	}
	*m = MemStats{}
	v := reflect.ValueOf(m).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		x, _ := mc.MemOverride("MemStats." + v.Type().Field(i).Name)
		switch f.Kind() {
		case reflect.Uint64, reflect.Uint32:
			f.SetUint(uint64(x))
		case reflect.Float64:
			f.SetFloat(x)
		}
	}
}
