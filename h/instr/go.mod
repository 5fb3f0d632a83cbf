module zzinstr

go 1.21
