//go:build race

package main

// raceBuild is whether the race detector is in.
const raceBuild = true
