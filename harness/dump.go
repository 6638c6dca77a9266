package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// dump writes every reachable value, in a canonical way. Floats by their bits.
func dump(b *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('&')
		if v.Kind() == reflect.Interface {
			b.WriteString(v.Elem().Type().String() + ":")
		}
		dump(b, v.Elem())
	case reflect.Struct:
		b.WriteString(v.Type().Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(v.Type().Field(i).Name + ":")
			dump(b, v.Field(i))
			b.WriteByte(',')
		}
		b.WriteByte('}')
	case reflect.Slice: // nil and empty slices and maps are the same
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b.WriteString("x" + hex.EncodeToString(v.Bytes()))
			return
		}
		fallthrough
	case reflect.Array:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i))
			b.WriteByte(',')
		}
		b.WriteByte(']')
	case reflect.Map:
		var keys []string
		m := map[string]reflect.Value{}
		for _, k := range v.MapKeys() {
			s := fmt.Sprint(k.Interface())
			keys = append(keys, s)
			m[s] = v.MapIndex(k)
		}
		sort.Strings(keys)
		b.WriteString("map{")
		for _, k := range keys {
			b.WriteString(strconv.Quote(k) + ":")
			dump(b, m[k])
			b.WriteByte(',')
		}
		b.WriteByte('}')
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Float32, reflect.Float64:
		b.WriteString(strconv.FormatUint(math.Float64bits(v.Float()), 16))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Bool:
		b.WriteString(strconv.FormatBool(v.Bool()))
	default:
		b.WriteString("?" + v.Kind().String())
	}
}

func digestOf(s string) string {
	h := sha1.Sum([]byte(s))
	return hex.EncodeToString(h[:8])
}

// digest identifies a value with everything it refers to.
func digest(v any) string {
	var b strings.Builder
	dump(&b, reflect.ValueOf(v))
	return digestOf(b.String())
}

// jsonDigest identifies a JSON text up to white space and order of members; "" if invalid.
func jsonDigest(text []byte) string {
	d := json.NewDecoder(bytes.NewReader(text))
	d.UseNumber()
	var v any
	if d.Decode(&v) != nil {
		return ""
	}
	c, _ := json.Marshal(v)
	return digestOf(string(c))
}
