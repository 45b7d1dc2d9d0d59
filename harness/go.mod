module github.com/tylantz/go-tailwind-merge/zzverif

go 1.24

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/tylantz/go-tailwind-merge v0.0.0
	golang.org/x/net v0.21.0
	pgregory.net/rapid v1.3.0
)

require github.com/tdewolff/parse/v2 v2.7.11 // indirect

replace github.com/tylantz/go-tailwind-merge => /repo
