module verif/mc

go 1.25

require github.com/protolambda/zssz v0.0.0

replace github.com/protolambda/zssz => /repo
