// Package simjs is a stub of the JavaScript host for the browser bridge. It
// has the part of syscall/js's API the bridge uses and the same conversions.
package simjs

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"

	"vsim/simrt"
)

type Type int

const (
	TypeUndefined Type = iota
	TypeNull
	TypeBoolean
	TypeNumber
	TypeString
	TypeSymbol
	TypeObject
	TypeFunction
)

type object struct {
	props map[string]Value
	fn    func(this Value, args []Value) any
	arr   []Value
	isArr bool
	bytes []byte // of a Uint8Array
	ctor  string // "Object", "Array", "Error", "Uint8Array": a constructor
	class string // what it was made by
}

// Value is a JavaScript value.
type Value struct {
	t   Type
	b   bool
	n   float64
	s   string
	obj *object
}

type Func struct {
	Value
}

func (f Func) Release() {}

var global = newGlobal()

func newGlobal() Value {
	g := Value{t: TypeObject, obj: &object{props: map[string]Value{}}}
	for _, c := range []string{"Object", "Array", "Error", "TypeError", "Uint8Array"} {
		g.obj.props[c] = Value{t: TypeFunction, obj: &object{ctor: c, props: map[string]Value{}}}
	}
	nop := FuncOf(func(Value, []Value) any { return Undefined() })
	con := map[string]any{}
	for _, m := range []string{"log", "info", "warn", "error", "debug"} {
		con[m] = nop
	}
	g.Set("console", con)
	g.Set("JSON", map[string]any{
		"parse": FuncOf(func(_ Value, a []Value) any {
			var x any
			if err := json.Unmarshal([]byte(a[0].s), &x); err != nil {
				panic(Error{ValueOf(map[string]any{"message": err.Error()})})
			}
			return x
		}),
		"stringify": FuncOf(func(_ Value, a []Value) any {
			b, _ := json.Marshal(plain(a[0]))
			return string(b)
		}),
	})
	g.Set("globalThis", g)
	return g
}

func plain(v Value) any {
	switch v.t {
	case TypeBoolean:
		return v.b
	case TypeNumber:
		return v.n
	case TypeString:
		return v.s
	case TypeObject:
		if v.obj.isArr {
			r := []any{}
			for _, e := range v.obj.arr {
				r = append(r, plain(e))
			}
			return r
		}
		r := map[string]any{}
		for k, e := range v.obj.props {
			if e.t != TypeUndefined && e.t != TypeFunction {
				r[k] = plain(e)
			}
		}
		return r
	}
	return nil
}

// Error is a JavaScript exception.
type Error struct{ Value }

func (e Error) Error() string { return "JavaScript error: " + e.Get("message").String() }

// ValueError is what the methods of a Value of another type panic with.
type ValueError struct {
	Method string
	Type   Type
}

func (e *ValueError) Error() string {
	return "syscall/js: call of " + e.Method + " on " + e.Type.String()
}

func (t Type) String() string {
	return [...]string{"undefined", "null", "boolean", "number", "string", "symbol", "object", "function"}[t]
}

func CopyBytesToGo(dst []byte, src Value) int { return copy(dst, src.obj.bytes) }
func CopyBytesToJS(dst Value, src []byte) int { return copy(dst.obj.bytes, src) }

// ResetGlobal gives the host a fresh global object.
func ResetGlobal() Value {
	global = newGlobal()
	return global
}

func Global() Value    { return global }
func Undefined() Value { return Value{} }
func Null() Value      { return Value{t: TypeNull} }

func FuncOf(fn func(this Value, args []Value) any) Func {
	return Func{Value{t: TypeFunction, obj: &object{fn: fn}}}
}

// ValueOf converts as syscall/js does, and panics for the same types.
func ValueOf(x any) Value {
	switch v := x.(type) {
	case Value:
		return v
	case Func:
		return v.Value
	case nil:
		return Null()
	case bool:
		return Value{t: TypeBoolean, b: v}
	case int:
		return num(float64(v))
	case int8:
		return num(float64(v))
	case int16:
		return num(float64(v))
	case int32:
		return num(float64(v))
	case int64:
		return num(float64(v))
	case uint:
		return num(float64(v))
	case uint8:
		return num(float64(v))
	case uint16:
		return num(float64(v))
	case uint32:
		return num(float64(v))
	case uint64:
		return num(float64(v))
	case float32:
		return num(float64(v))
	case float64:
		return num(v)
	case string:
		return Value{t: TypeString, s: v}
	case []any:
		o := &object{isArr: true}
		for _, e := range v {
			o.arr = append(o.arr, ValueOf(e))
		}
		return Value{t: TypeObject, obj: o}
	case map[string]any:
		o := &object{props: map[string]Value{}}
		for k, e := range v {
			o.props[k] = ValueOf(e)
		}
		return Value{t: TypeObject, obj: o}
	}
	panic("ValueOf: invalid value")
}

func num(f float64) Value { return Value{t: TypeNumber, n: f} }

func (v Value) Type() Type        { return v.t }
func (v Value) IsUndefined() bool { return v.t == TypeUndefined }
func (v Value) IsNull() bool      { return v.t == TypeNull }
func (v Value) Truthy() bool {
	switch v.t {
	case TypeUndefined, TypeNull:
		return false
	case TypeBoolean:
		return v.b
	case TypeNumber:
		return v.n != 0
	case TypeString:
		return v.s != ""
	}
	return true
}

func (v Value) String() string {
	switch v.t {
	case TypeString:
		return v.s
	case TypeUndefined:
		return "<undefined>"
	case TypeNull:
		return "<null>"
	case TypeBoolean:
		return fmt.Sprintf("<boolean: %v>", v.b)
	case TypeNumber:
		return fmt.Sprintf("<number: %v>", v.n)
	case TypeFunction:
		return "<function>"
	}
	return "<object>"
}

func (v Value) Int() int {
	if v.t != TypeNumber {
		panic(&ValueError{"Value.Int", v.t})
	}
	return int(v.n)
}
func (v Value) Float() float64 {
	if v.t != TypeNumber {
		panic(&ValueError{"Value.Float", v.t})
	}
	return v.n
}
func (v Value) Bool() bool {
	if v.t != TypeBoolean {
		panic(&ValueError{"Value.Bool", v.t})
	}
	return v.b
}

func (v Value) Get(p string) Value {
	if v.obj == nil {
		panic(&ValueError{"Value.Get", v.t})
	}
	if v.obj.isArr {
		if p == "length" {
			return num(float64(len(v.obj.arr)))
		}
		if p == "push" {
			return FuncOf(func(_ Value, a []Value) any {
				v.obj.arr = append(v.obj.arr, a...)
				return len(v.obj.arr)
			}).Value
		}
	}
	return v.obj.props[p]
}
func (v Value) Set(p string, x any) {
	if v.obj == nil {
		panic(&ValueError{"Value.Set", v.t})
	}
	if v.obj.props == nil {
		v.obj.props = map[string]Value{}
	}
	v.obj.props[p] = ValueOf(x)
}
func (v Value) Delete(p string) { delete(v.obj.props, p) }
func (v Value) Keys() []string {
	var ks []string
	for k := range v.obj.props {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
func (v Value) IsArray() bool { return v.obj != nil && v.obj.isArr }
func (v Value) Length() int {
	if v.t == TypeString {
		return len([]rune(v.s))
	}
	if v.obj == nil {
		panic(&ValueError{"Value.Length", v.t})
	}
	return len(v.obj.arr)
}
func (v Value) Index(i int) Value {
	if v.obj == nil {
		panic(&ValueError{"Value.Index", v.t})
	}
	if i < 0 || i >= len(v.obj.arr) {
		return Undefined()
	}
	return v.obj.arr[i]
}

// Invoke calls a function value: the result is converted as the host would.
func (v Value) Invoke(args ...any) Value {
	simrt.YS()
	if v.t != TypeFunction {
		panic(&ValueError{"Value.Invoke", v.t})
	}
	var a []Value
	for _, x := range args {
		a = append(a, ValueOf(x))
	}
	if v.obj.ctor != "" {
		return construct(v.obj.ctor, args)
	}
	return ValueOf(v.obj.fn(Undefined(), a))
}

func (v Value) Call(m string, args ...any) Value { return v.Get(m).Invoke(args...) }
func (v Value) New(args ...any) Value {
	simrt.YS()
	if v.t != TypeFunction {
		panic(&ValueError{"Value.New", v.t})
	}
	if v.obj.ctor == "" {
		this := Value{t: TypeObject, obj: &object{props: map[string]Value{}}}
		var a []Value
		for _, x := range args {
			a = append(a, ValueOf(x))
		}
		if r := ValueOf(v.obj.fn(this, a)); r.t == TypeObject {
			return r
		}
		return this
	}
	return construct(v.obj.ctor, args)
}

func construct(ctor string, args []any) Value {
	o := &object{props: map[string]Value{}, class: ctor}
	switch ctor {
	case "Array":
		o.isArr = true
		if len(args) == 1 {
			if n := ValueOf(args[0]); n.t == TypeNumber {
				o.arr = make([]Value, int(n.n))
				break
			}
		}
		for _, x := range args {
			o.arr = append(o.arr, ValueOf(x))
		}
	case "Uint8Array":
		if len(args) == 1 {
			o.bytes = make([]byte, ValueOf(args[0]).Int())
		}
	case "Error", "TypeError":
		if len(args) > 0 {
			o.props["message"] = ValueOf(args[0])
		}
	}
	return Value{t: TypeObject, obj: o}
}

func (v Value) IsNaN() bool { return v.t == TypeNumber && math.IsNaN(v.n) }
func (v Value) InstanceOf(t Value) bool {
	if v.obj == nil || t.obj == nil {
		return false
	}
	switch t.obj.ctor {
	case "Object":
		return v.t == TypeObject || v.t == TypeFunction
	case "Array":
		return v.obj.isArr
	}
	return t.obj.ctor != "" && v.obj.class == t.obj.ctor
}
func (v Value) SetIndex(i int, x any) {
	if v.obj == nil {
		panic(&ValueError{"Value.SetIndex", v.t})
	}
	if !v.obj.isArr {
		v.Set(strconv.Itoa(i), x)
		return
	}
	for len(v.obj.arr) <= i {
		v.obj.arr = append(v.obj.arr, Undefined())
	}
	v.obj.arr[i] = ValueOf(x)
}
func (v Value) Equal(w Value) bool {
	return v.t == w.t && v.b == w.b && v.n == w.n && v.s == w.s && v.obj == w.obj
}
