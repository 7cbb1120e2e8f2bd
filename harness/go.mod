module verifharness

go 1.14

require github.com/jart/gosip v0.0.0

replace github.com/jart/gosip => /repo
