//! only carries the dependency: the module under test is algebraics' own cdylib
