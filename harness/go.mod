module vp

go 1.18
