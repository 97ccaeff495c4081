//go:build race

package main

import "runtime"

const raceDetector = true

func raceErrors() int { return runtime.RaceErrors() }
