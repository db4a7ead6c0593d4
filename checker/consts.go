package main

import (
	"go/constant"
	"go/token"
)

// int64Val is constant.Int64Val for constants of every kind: those that are
// no integers have no value.
func int64Val(v constant.Value) (int64, bool) {
	if v == nil {
		return 0, false
	}
	if k := v.Kind(); k != constant.Int && k != constant.Float {
		return 0, false
	}
	if v = constant.ToInt(v); v.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(v)
}

// signOf is constant.Sign; values that are no numbers count as positive.
func signOf(v constant.Value) int {
	if k := v.Kind(); k != constant.Int && k != constant.Float {
		return 1
	}
	return constant.Sign(v)
}

// strOf is constant.StringVal; values that are no strings have none.
func strOf(v constant.Value) string {
	if v.Kind() != constant.String {
		return ""
	}
	return constant.StringVal(v)
}

// numeric reports whether v is an integer or a floating point number.
func numeric(v constant.Value) bool {
	return v.Kind() == constant.Int || v.Kind() == constant.Float
}

// sameConst reports whether a and b are the same constant; values of different
// kinds are not.
func sameConst(a, b constant.Value) bool {
	if a.Kind() != b.Kind() && !(numeric(a) && numeric(b)) {
		return false
	}
	return constant.Compare(a, token.EQL, b)
}
