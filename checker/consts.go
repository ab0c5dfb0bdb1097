package main

import (
	"go/constant"
	"go/token"
)

func cmpConst(a, b constant.Value, op int) bool {
	tok := []token.Token{token.EQL, token.LSS, token.LEQ}[op]
	if a.Kind() == constant.Bool {
		return constant.BoolVal(a) == constant.BoolVal(b)
	}
	return constant.Compare(a, tok, b)
}

func arith(op string, a, b constant.Value) constant.Value {
	if a.Kind() == constant.String && op != "+" || a.Kind() == constant.Bool {
		return nil
	}
	tok := map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL}[op]
	return constant.BinaryOp(a, tok, b)
}
