//go:build ignore

// A generator: no part of the plugin.
package main

import "fmt"

type Live_ignoredT struct{}

func Live_ignored() {}

func InvokeFunc(name string) {}

func Extra() { fmt.Println(Live_ignoredT{}) }

func main() { Extra() }
