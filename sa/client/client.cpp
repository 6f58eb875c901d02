#include "client.h"
extern "C" {
void client_catchall(void)
{
  try { client_body(1); }
  catch (...) { client_caught(); }
}

void client_catchint(void)
{
  try { client_body(1); }
  catch (int) { client_caught(); }
}

void client_catchboth(void)
{
  try { client_body(1); }
  catch (int) { client_caught(); }
  catch (...) { client_caught(); }
}

void client_cancel(void) { throw ptw32_exception_cancel(); }
void client_exit(void) { throw ptw32_exception_exit(); }
}
