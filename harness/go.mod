module verifharness

go 1.23

require (
	github.com/mottla/go-AlgebraicProgram-SNARK v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/mottla/go-AlgebraicProgram-SNARK => /repo
