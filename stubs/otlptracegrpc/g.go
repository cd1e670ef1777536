package otlptracegrpc

type Option interface{ o() }
type Client struct{}

func NewClient(...Option) Client { return Client{} }
