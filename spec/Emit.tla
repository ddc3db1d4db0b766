-------------------------------- MODULE Emit --------------------------------
(* Parameters of a run (from the environment) and output of generated cases. *)
EXTENDS TLC, IOUtils, Json, CSV, Integers, Sequences
SeedE == atoi(IOEnv.VERIF_SEED)
NumE == atoi(IOEnv.CASES)
OutE == IOEnv.OUT
\* Long lines go to files of their own: concurrent appends are atomic only up to
\* the size of the writer's buffer.
EmitCase(c) == LET j == ToJson(c) IN
  CSVWrite("%1$s", <<j>>, IF Len(j) < 3500 THEN OutE ELSE OutE \o "." \o c.id)
=============================================================================
