package main

import "unsafe"

func unsafeSlice(p Ptr, n int) []Value { return unsafe.Slice((*Value)(p), n) }
