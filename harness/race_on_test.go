//go:build race

package zzverif

const raceEnabled = true
