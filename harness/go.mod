module verif/harness

go 1.24

require (
	github.com/zyedidia/generic v0.0.0
)

require (
	github.com/segmentio/fasthash v1.0.3 // indirect
	golang.org/x/exp v0.0.0-20220218215828-6cf2b201936e // indirect
)

replace github.com/zyedidia/generic => /repo
