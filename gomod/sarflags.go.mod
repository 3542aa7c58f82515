module github.com/charlesetsmith/saratoga/sarflags

go 1.21.4
