package main

import (
	"context"
	"net"
)

type ctxT = context.Context

func withConn(ctx ctxT, c net.Conn) ctxT {
	if sc, ok := c.(*simConn); ok {
		return context.WithValue(ctx, connKey{}, sc)
	}
	return ctx
}
