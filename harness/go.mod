module verif/harness

go 1.21

require github.com/lkmio/avformat v0.0.0

replace github.com/lkmio/avformat => /repo
