module verif/rewrite

go 1.26.0

require golang.org/x/tools v0.52.0
