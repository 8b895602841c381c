package model

// Outcome is the outcome of evaluating a program.
type Outcome struct {
	Val     Val
	Err     ErrKind // "" on success
	Index   int     // the failing instruction
	State   State   // the state at the end, or at the failure
	Calls   int     // calls made
	ErrFunc string  // the function that failed, if one did
}

// Fn is a function a program can call.
type Fn func(args []Val, s *State) (Val, ErrKind)

// Env maps names to functions; a nil Env holds the builtins.
type Env map[string]Fn

func (e Env) get(name string) (Fn, bool) {
	if e != nil {
		if f, ok := e[name]; ok {
			return f, true
		}
	}
	if _, ok := Sigs[name]; !ok {
		return nil, false
	}
	return func(args []Val, s *State) (Val, ErrKind) { return Call(name, args, s) }, true
}

// Eval evaluates a program from the given state.
func Eval(prog []Val, st State, env Env) Outcome {
	o := Outcome{Val: S(""), State: st}
	for i, e := range prog {
		v, err := o.eval(e, env)
		if err != "" {
			o.Err, o.Index = err, i
			return o
		}
		o.Val = v
	}
	return o
}

func (o *Outcome) eval(e Val, env Env) (Val, ErrKind) {
	switch e.K {
	case Str, Num:
		return e, ""
	case Sym:
		return e, EExpr
	}
	if len(e.L) == 0 {
		return e, EEmpty
	}
	if e.L[0].K != Sym {
		return e, EHead
	}
	f, ok := env.get(e.L[0].S)
	if !ok {
		return e, EUndef
	}
	var args []Val
	for _, a := range e.L[1:] {
		v, err := o.eval(a, env)
		if err != "" {
			return e, err
		}
		args = append(args, v)
	}
	o.Calls++
	v, err := f(args, &o.State)
	if err != "" {
		o.ErrFunc = e.L[0].S
	}
	return v, err
}
