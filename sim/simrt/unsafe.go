package simrt

import "unsafe"

type unsafePointer = unsafe.Pointer

func toUnsafe(p *uintptr) unsafe.Pointer { return unsafe.Pointer(p) }
