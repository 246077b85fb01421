//go:build !fastkdf

package main

func kdfStats() map[string]any { return nil }
