package simrt

import "runtime"

// Finalizers and cleanups need not ever run, and do not here: they would run
// on a goroutine of the real scheduler, at a moment of its choice.

func SetFinalizer(obj, finalizer any) { YS() }

func AddCleanup[T, S any](ptr *T, cleanup func(S), arg S) runtime.Cleanup {
	YS()
	return runtime.Cleanup{}
}
