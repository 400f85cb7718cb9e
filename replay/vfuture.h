// Included after the other headers of the code: std::promise and std::future under the scheduler (a separate step because
// coroutine_handle::promise() has the same name).
#pragma once
#define promise vpromise
#define future vfuture
