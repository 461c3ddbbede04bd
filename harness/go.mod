module verif.local/h

go 1.26

require github.com/zijiren233/gencontainer v0.0.0

require golang.org/x/exp v0.0.0-20241004190924-225e2abe05e6

require github.com/maruel/natural v1.1.1 // indirect

replace github.com/zijiren233/gencontainer => /repo
