@fn target::make_ctx #C15
@ensures
    r == ctx_of(target),
@end
