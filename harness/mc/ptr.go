package main

import "unsafe"

func ptr(b []byte) unsafe.Pointer { return unsafe.Pointer(&b[0]) }
