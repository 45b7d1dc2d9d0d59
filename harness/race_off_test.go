//go:build !race

package zzverif

const raceEnabled = false
