<?php
/* Calls made from code without strict_types: arguments are converted before they arrive. */
function weak_call(object|string $o, string $m, array $args): mixed { return is_string($o) ? $o::$m(...$args) : $o->$m(...$args); }
function weak_function(string $f, array $args): mixed { return $f(...$args); }
