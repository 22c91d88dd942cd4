INIT Init
NEXT Next
INVARIANT StoreConsistent
