// deps only exists so that the third-party packages braid needs can be compiled ahead of braid itself.
package main

import (
	_ "github.com/alicebob/miniredis/v2"
	_ "github.com/google/uuid"
	_ "github.com/grpc-ecosystem/go-grpc-middleware"
	_ "github.com/grpc-ecosystem/go-grpc-middleware/recovery"
	_ "github.com/opentracing/opentracing-go"
	_ "github.com/redis/go-redis/v9"
	_ "github.com/uber/jaeger-client-go"
	_ "go.uber.org/zap"
	_ "golang.org/x/sync/errgroup"
	_ "google.golang.org/grpc"
	_ "google.golang.org/grpc/connectivity"
	_ "google.golang.org/grpc/credentials/insecure"
	_ "google.golang.org/grpc/test/bufconn"
	_ "google.golang.org/protobuf/proto"
	_ "testing"
	_ "testing/synctest"
)

func main() {}
