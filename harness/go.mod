module github.com/tinne26/ggfnt/verifdrv

go 1.21.1

require github.com/tinne26/ggfnt v0.0.0

replace github.com/tinne26/ggfnt => /repo
