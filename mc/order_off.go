//go:build !maporder

package main

func fresh([]string) { panic("built without control of the order of maps") }
