SPECIFICATION Spec
CONSTANTS MaxAdds = 6  Retries = 3  Rate = 3  MaxDue = 2  Statuses = {"ok", "srv", "err", "exc"}  HasPos = TRUE  Gen = TRUE
INVARIANTS ExactlyOnce BatchRetries PosRetries PosPerInterval FirstPass AllUploaded Printed
CHECK_DEADLOCK FALSE
