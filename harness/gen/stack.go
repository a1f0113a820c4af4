package gen

import "runtime"

func stack(b []byte) int { return runtime.Stack(b, true) }
