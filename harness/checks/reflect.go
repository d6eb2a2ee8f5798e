package checks

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

// textDecoders are the convenience functions.
var textDecoders = map[string]func([]byte) (*scte35.SpliceInfoSection, error){
	"DecodeHex": func(b []byte) (*scte35.SpliceInfoSection, error) { return scte35.DecodeHex(hex.EncodeToString(b)) },
	"DecodeHex 0x": func(b []byte) (*scte35.SpliceInfoSection, error) {
		return scte35.DecodeHex("0x" + hex.EncodeToString(b))
	},
	"DecodeBase64": func(b []byte) (*scte35.SpliceInfoSection, error) {
		return scte35.DecodeBase64(base64.StdEncoding.EncodeToString(b))
	},
}

// dump writes out every public field of a value, pointers followed; the
// bookkeeping fields of the document forms (JSONType, XMLName) are left out.
// A nil and an empty list are the same.
func dump(v any) string {
	var sb strings.Builder
	dumpTo(&sb, reflect.ValueOf(v))
	return sb.String()
}

var timeType = reflect.TypeOf(time.Time{})

func dumpTo(sb *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Invalid:
		sb.WriteString("nil")
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Interface {
			fmt.Fprintf(sb, "(%s)", v.Elem().Type())
		}
		dumpTo(sb, v.Elem())
	case reflect.Struct:
		if v.Type() == timeType {
			fmt.Fprint(sb, v.Interface().(time.Time).UnixNano())
			return
		}
		sb.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if !f.IsExported() || f.Name == "JSONType" || f.Name == "XMLName" {
				continue
			}
			fmt.Fprintf(sb, "%s:", f.Name)
			dumpTo(sb, v.Field(i))
			sb.WriteString(" ")
		}
		sb.WriteString("}")
	case reflect.Slice, reflect.Array:
		fmt.Fprintf(sb, "[%d:", v.Len())
		for i := 0; i < v.Len(); i++ {
			dumpTo(sb, v.Index(i))
			sb.WriteString(" ")
		}
		sb.WriteString("]")
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	default:
		fmt.Fprintf(sb, "%v", v.Interface())
	}
}

// spoil changes every public value that can be reached, in place.
func spoil(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			spoil(v.Elem())
		}
	case reflect.Struct:
		if v.Type() == timeType {
			if v.CanSet() {
				v.Set(reflect.ValueOf(v.Interface().(time.Time).Add(time.Hour)))
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.IsExported() {
				spoil(v.Field(i))
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			spoil(v.Index(i))
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString(v.String() + "!")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 1)
		}
	}
}

// appendAll appends one element to every public list that can be reached,
// without moving it if it has room, the way a user's append does.
func appendAll(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			appendAll(v.Elem())
		}
	case reflect.Struct:
		if v.Type() == timeType {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.IsExported() {
				appendAll(v.Field(i))
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			appendAll(v.Index(i))
		}
		if v.CanSet() && v.Type().Elem().Kind() != reflect.Interface {
			if v.Len() > 0 {
				v.Set(reflect.Append(v, v.Index(0)))
			} else {
				v.Set(reflect.Append(v, reflect.Zero(v.Type().Elem())))
			}
		}
	}
}
