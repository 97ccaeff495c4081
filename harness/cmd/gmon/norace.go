//go:build !race

package main

const raceDetector = false

func raceErrors() int { return 0 }
