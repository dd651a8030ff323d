//go:build sched

package main

import "github.com/hound-search/hound/vsched"

func init() { schedStart = vsched.Start }
