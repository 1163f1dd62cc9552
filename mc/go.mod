module verif/mc

go 1.23

require github.com/qiniu/text v0.0.0

replace github.com/qiniu/text => /repo
