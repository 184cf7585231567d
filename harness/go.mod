module verifharness

go 1.21

require github.com/dmitryikh/leaves v0.0.0

replace github.com/dmitryikh/leaves => /repo
