module verifharness

go 1.18

require github.com/msaf1980/go-matcher v0.0.0

replace github.com/msaf1980/go-matcher => /repo
