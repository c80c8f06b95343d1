module verifdriver

go 1.18

require github.com/jhump/gopoet v0.0.0

replace github.com/jhump/gopoet => /repo
