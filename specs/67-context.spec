# Contexts.

# true if the context is cancelled at some time; true if a receive from the channel can succeed
ufn cancelled(ctx context.Context) bool
ufn recvable(ch channel) bool

contract context.Context.Done(ctx)
  trusted
  ensures imp(recvable(result0), cancelled(ctx))

contract icontext.IsCancelled(ctx)
  props C12 C13 C15
  ensures imp(result0, cancelled(ctx))
