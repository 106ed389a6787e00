module github.com/go-ini/ini

go 1.27
