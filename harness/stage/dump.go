package stage

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
)

// Dump renders a value completely, following pointers.
func Dump(v interface{}) string {
	var b strings.Builder
	dump(&b, reflect.ValueOf(v))
	return b.String()
}

func dump(b *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("none")
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(b, "%s&", v.Type())
		dump(b, v.Elem())
	case reflect.Struct:
		b.WriteString(v.Type().Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			dump(b, v.Field(i))
			b.WriteString(";")
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString("nil")
		}
		fmt.Fprintf(b, "%d[", v.Len())
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i))
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(b, v.Uint())
	case reflect.Map:
		var ks []string
		for _, k := range v.MapKeys() {
			var e strings.Builder
			dump(&e, k)
			e.WriteString(":")
			dump(&e, v.MapIndex(k))
			ks = append(ks, e.String())
		}
		sort.Strings(ks)
		fmt.Fprintf(b, "map%v", ks)
	default:
		panic("dump: " + v.Kind().String())
	}
}
