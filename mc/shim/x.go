package shim
