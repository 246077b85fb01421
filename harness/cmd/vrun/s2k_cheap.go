//go:build cheaps2k

package main

import "verifharness/props"

func init() { props.SetS2KCount(0x60) }
