//go:build !yield

package main

func sleeps(on bool, seed uint64) {}

func yields(on bool, seed uint64) {}
