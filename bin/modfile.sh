#!/bin/bash
# modfile.sh OUTDIR STUBS: writes OUTDIR/go.mod and go.sum = /repo's plus rapid and the offline otel stubs.
set -e
out=$1; stubs=$2; repo=${REPO:-/repo}
mkdir -p "$out"
{
  cat "$repo/go.mod"
  echo
  echo 'require pgregory.net/rapid v1.3.0'
  echo 'require github.com/anishathalye/porcupine v1.3.1'
  echo 'replace ('
  while read -r m d; do echo "	$m => $stubs/$d"; done <<L
go.opentelemetry.io/otel otel
go.opentelemetry.io/otel/metric otelmetric
go.opentelemetry.io/otel/trace oteltrace
go.opentelemetry.io/otel/sdk otelsdk
go.opentelemetry.io/otel/sdk/metric otelsdkmetric
go.opentelemetry.io/otel/exporters/otlp/otlptrace otlptrace
go.opentelemetry.io/otel/exporters/otlp/otlptrace/otlptracegrpc otlptracegrpc
go.opentelemetry.io/otel/exporters/prometheus otelprom
go.opentelemetry.io/contrib/instrumentation/go.mongodb.org/mongo-driver/v2/mongo/otelmongo otelmongo
go.opentelemetry.io/contrib/instrumentation/google.golang.org/grpc/otelgrpc otelgrpc
github.com/redis/go-redis/extra/redisotel/v9 redisotel
L
  echo ')'
} > "$out/go.mod"
cp "$repo/go.sum" "$out/go.sum"
