module app

go 1.20

require (
	github.com/shopspring/decimal v1.4.0
	github.com/wskfjtheqian/hbuf_golang v0.0.0
)

replace github.com/wskfjtheqian/hbuf_golang => ../hbuf_golang
