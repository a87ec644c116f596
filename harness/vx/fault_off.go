// +build !vxfault

package vx

func failing(path string) { panic("built without read faults") }
