module vharness

go 1.26.0

require pgregory.net/rapid v1.3.0
