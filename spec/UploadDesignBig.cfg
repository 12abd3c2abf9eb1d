SPECIFICATION Spec
CONSTANTS MaxAdds = 3  Retries = 2  Rate = 2  MaxDue = 1  Statuses = {"ok", "srv", "err"}  HasPos = TRUE  Gen = FALSE
INVARIANTS ExactlyOnce BatchRetries PosRetries PosPerInterval FirstPass AllUploaded
PROPERTY Ends
CHECK_DEADLOCK FALSE
